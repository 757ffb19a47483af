"""What the checker knows about library operations (names, signatures)."""
import math


class _R:
    pass


_REQ = _R()

ALIAS = {
    "idxmin": "argmin", "idxmax": "argmax", "to_numpy": "numpy",
    "clip": "clamp", "clamp": "clamp", "multiply": "mul", "mul": "mul", "absolute": "abs", "fabs": "abs", "abs": "abs",
    "concatenate": "torchcat", "concat": "torchcat", "cat": "torchcat", "power": "pow", "float_power": "pow", "divide": "div", "true_divide": "div", "div": "div",
    "subtract": "sub", "view": "reshape", "logical_and": "and", "logical_or": "or", "logical_not": "not", "bitwise_and": "and",
    "bitwise_or": "or", "bitwise_not": "not", "logical_xor": "xor", "inv": "inverse", "linalg.inv": "inverse", "conjugate": "conj", "resolve_conj": "conj0",
    "dot": "matmul", "mm": "matmul", "bmm": "matmul", "matmul": "matmul", "remainder": "mod", "fmod": "fmod", "floor_divide": "floordiv", "negative": "neg",
    "asarray": "asarray", "array": "array", "arcsin": "asin", "arccos": "acos", "arctan": "atan", "swapaxes": "transpose", "transpose": "transpose", "t": "transpose",
    "double": "double", "linalg.solve": "linalg.solve", "bmat": "bmat", "greater": "gt", "less": "lt", "greater_equal": "ge", "less_equal": "le", "equal": "equalall",
    "not_equal": "ne", "repeat_interleave": "repeat_interleave",
}

METHODS = {
    "idxmin", "idxmax", "to_numpy",
    "abs", "clip", "clamp", "mul", "multiply", "add", "sub", "subtract", "div", "divide", "true_divide", "pow", "sqrt", "square", "exp", "log", "log10", "sin", "cos", "tan", "tanh",
    "sum", "mean", "max", "min", "argmax", "argmin", "prod", "cumsum", "std", "var", "median", "norm", "real", "imag", "conj", "angle", "reshape", "view", "flatten", "squeeze", "unsqueeze",
    "repeat", "repeat_interleave", "expand", "expand_as", "permute", "transpose", "t", "swapaxes", "int", "float", "double", "long", "bool", "half", "to", "type", "cpu", "cuda", "numpy", "detach", "clone", "item",
    "tolist", "contiguous", "size", "dim", "neg", "reciprocal", "sign", "round", "floor", "ceil", "isnan", "any", "all", "eq", "ne", "gt", "lt", "ge", "le", "logical_and", "logical_or", "logical_not",
    "matmul", "mm", "dot", "bmm", "inverse", "inv", "diag", "diagonal", "trace", "softmax", "sigmoid", "relu", "roll", "flip", "sort", "argsort", "nonzero", "where", "masked_fill", "index_select", "gather", "scatter",
    "unbind", "chunk", "split", "amax", "amin", "count_nonzero", "element_size", "numel", "cfloat", "cdouble", "requires_grad_", "copy", "astype", "unique", "new_zeros", "zero", "fill", "ndimension", "resolve_conj", "absolute", "bernoulli", "normal", "uniform", "minimum", "maximum", "fmod", "remainder", "rsqrt", "view_as", "reshape_as", "type_as", "conjugate", "nan_to_num", "kron", "outer", "cross", "topk", "lerp", "addcmul", "heaviside", "exp2", "expm1", "log1p", "log2", "sinh", "cosh", "erf", "softplus", "square_", "idxmin_", "isinf", "isfinite", "isclose", "allclose", "narrow", "select", "tril", "triu", "cummax", "diff",
}

# value-preserving operations (copies, device moves, detaching)
IDENT = {"detach", "clone", "cpu", "cuda", "numpy", "contiguous", "item", "requires_grad_", "copy", "tolist", "resolve_conj", "conj0", "asarray", "as_tensor", "cfloat0"}
GRADKILL = {"detach", "numpy", "item", "tolist"}
LOGGING = {"logger", "print"}

DTYPES = {"float": "float32", "float32": "float32", "double": "float64", "float64": "float64", "cfloat": "complex64", "complex64": "complex64",
          "cdouble": "complex128", "complex128": "complex128", "int": "int32", "int32": "int32", "long": "int64", "int64": "int64", "bool": "bool", "complex": "complex", "float16": "float16", "half": "float16", "uint8": "uint8", "int8": "int8", "int16": "int16"}

SHAPE_FIRST = {"zeros", "ones", "rand", "randn", "empty", "full"}

EXT_CONST = {"numpy.pi": math.pi, "math.pi": math.pi, "torch.pi": math.pi, "numpy.inf": math.inf, "math.inf": math.inf, "torch.inf": math.inf, "bd.pi": math.pi,
             "numpy.e": math.e, "math.e": math.e, "numpy.newaxis": None, "numpy.nan": math.nan, "math.nan": math.nan}

R = _REQ
SIG = {
    "sum": [("input", R), ("dim", None), ("keepdim", False)],
    "mean": [("input", R), ("dim", None), ("keepdim", False)],
    "prod": [("input", R), ("dim", None), ("keepdim", False)],
    "std": [("input", R), ("dim", None)],
    "max": [("input", R), ("dim", None), ("keepdim", False)],
    "min": [("input", R), ("dim", None), ("keepdim", False)],
    "argmax": [("input", R), ("dim", None), ("keepdim", False)],
    "argmin": [("input", R), ("dim", None), ("keepdim", False)],
    "amax": [("input", R), ("dim", None)],
    "amin": [("input", R), ("dim", None)],
    "median": [("input", R), ("dim", None)],
    "cumsum": [("input", R), ("dim", R)],
    "clamp": [("input", R), ("min", None), ("max", None)],
    "linspace": [("start", R), ("end", R), ("steps", 50)],
    "logspace": [("start", R), ("end", R), ("steps", 50), ("endpoint", True), ("base", 10.0)],
    "stack": [("tensors", R), ("dim", 0)],
    "torchcat": [("tensors", R), ("dim", 0)],
    "softmax": [("input", R), ("dim", R)],
    "unsqueeze": [("input", R), ("dim", R)],
    "squeeze": [("input", R), ("dim", None)],
    "repeat_interleave": [("input", R), ("repeats", R), ("dim", None)],
    "where": [("condition", R), ("input", R), ("other", R)],
    "roll": [("input", R), ("shifts", R), ("dims", None)],
    "split": [("input", R), ("split_size", R), ("dim", 0)],
    "sort": [("input", R), ("dim", -1), ("descending", False)],
    "argsort": [("input", R), ("dim", -1), ("descending", False)],
    "pow": [("input", R), ("exponent", R)],
    "any": [("input", R), ("dim", None)],
    "all": [("input", R), ("dim", None)],
    "nonzero": [("input", R)],
    "abs": [("input", R)],
    "isnan": [("input", R)],
    "flatten": [("input", R), ("start_dim", 0), ("end_dim", -1)],
    "norm": [("input", R), ("p", "fro"), ("dim", None)],
    "arange": [("start", R), ("end", None), ("step", 1)],
    "eye": [("n", R), ("m", None)],
    "full": [("size", R), ("fill_value", R)],
    "maximum": [("input", R), ("other", R)],
    "minimum": [("input", R), ("other", R)],
    "exp": [("input", R)], "log": [("input", R)], "log10": [("input", R)], "sqrt": [("input", R)], "square": [("input", R)],
    "real": [("input", R)], "imag": [("input", R)], "sign": [("input", R)], "sin": [("input", R)], "cos": [("input", R)],
    "diag": [("input", R), ("diagonal", 0)],
    "zeros_like": [("input", R)], "ones_like": [("input", R)], "randn_like": [("input", R)], "rand_like": [("input", R)],
    "inverse": [("input", R)],
    "matmul": [("input", R), ("other", R)],
    "transpose": [("input", R), ("dim0", None), ("dim1", None)],
    "reshape": [("input", R), ("shape", R)],
    "cross": [("input", R), ("other", R), ("dim", None)],
}
