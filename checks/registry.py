"""property -> (module, function, technique)"""
CHECKS = {
    "C01": ("pose", "c01", "value numbering of LLVM IR: affine address analysis with symbolic strides"),
    "C02": ("pose", "c02", "value numbering of LLVM IR under an aliasing assumption"),
    "C03": ("pose", "c03", "value numbering of LLVM IR specialised to NULL outputs"),
    "C04": ("pose", "c04", "value numbering of LLVM IR with formal differentiation and algebraic normal forms"),
    "C06": ("pose", "c06", "value numbering of LLVM IR against defining formulas in algebraic normal form"),
    "C07": ("opt", "c07", "value numbering of LLVM IR specialised to problem structures: state layout"),
    "C08": ("opt", "c08", "value numbering of LLVM IR specialised to problem structures: dependence of measurements on inputs"),
    "C09": ("opt", "c09", "value numbering of LLVM IR specialised to problem structures: packing"),
    "C10": ("opt", "c10", "value numbering of LLVM IR specialised to problem structures, with formal differentiation"),
    "C05": ("lens", "c05", "value numbering of LLVM IR with formal differentiation of the projection"),
    "C24": ("lens", "c24", "value numbering of LLVM IR against the documented projection formulas"),
    "C25": ("lens", "c25", "value numbering of LLVM IR: composition of closed-form projection and unprojection"),
    "C11": ("flow", "c11", "path-sensitive typestate of resources over LLVM IR"),
    "C12": ("pyext", "c12", "path-sensitive typestate of exceptions over LLVM IR of the Python extension"),
    "C13": ("flow", "c13", "path-sensitive typestate of failures over LLVM IR"),
    "C14": ("effects", "c14", "effect analysis of LLVM IR and of the Python syntax trees: process-wide state"),
    "C15": ("effects", "c15", "effect analysis of LLVM IR and of the Python syntax trees: streams, files, process"),
    "C16": ("refs", "c16", "path-sensitive typestate of Python references over LLVM IR"),
    "C18": ("bind", "c18", "value numbering of the generated bindings' LLVM IR against the C API; syntax-tree path analysis of the Python wrappers"),
    "C20": ("alias", "c20", "flow-sensitive may-alias and mutation analysis over the Python syntax trees"),
    "C23": ("frames", "c23", "type inference of coordinate frames over the Python syntax trees (unification)"),
    "C28": ("kinds", "c28", "type check of kinds of quantities over the syntax trees of the C and Python sources"),
    "C26": ("tri", "c26", "value numbering of LLVM IR with formal differentiation and random interpretation against published formulas"),
}
