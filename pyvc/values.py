"""Program values of the interpreter."""
import ast
import z3
from .core import *

# --------------------------------------------------------------------------- program values

class ModV:
    def __init__(self, name): self.name = name
    def __repr__(self): return f"<module {self.name}>"

class FuncV:
    def __init__(self, node, mod, frame, name, cls=None):
        self.node, self.mod, self.frame, self.name, self.cls = node, mod, frame, name, cls
        self.isgen = has_yield(node)
        self.defaults = None
    def __repr__(self): return f"<function {self.name}>"

class BoundV:
    def __init__(self, recv, fn): self.recv, self.fn = recv, fn
    def __repr__(self): return f"<bound {self.fn}>"

class BuiltinV:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f"<builtin {self.name}>"

class ClassV:
    def __init__(self, node, mod, frame, name):
        self.node, self.mod, self.frame, self.name = node, mod, frame, name
        self.bases, self.attrs, self.exprs = [], {}, {}
        self.isexc = False
        self.enum = None            # list of (member, value) for enums
    def __repr__(self): return f"<class {self.name}>"

class TypeV:
    """builtin type used as a value"""
    def __init__(self, name): self.name = name
    def __repr__(self): return f"<type {self.name}>"

class Wrap:
    """staticmethod / classmethod / property"""
    def __init__(self, kind, fn): self.kind, self.fn = kind, fn

class GenV:
    """suspended generator: run(on_yield) executes it"""
    def __init__(self, run, pure=False):
        self.run, self.used, self.pure = run, False, pure

class CtxV:
    """contextmanager instance: the generator function call"""
    def __init__(self, run): self.run = run

class IterCell(Cell):
    def __init__(self, E, seq):
        super().__init__(E, "iter", pos=0)
        self.seq = seq

class ExcV:
    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, args, attrs or {}
    def __repr__(self): return f"<exc {exc_name(self.cls)} {self.args}>"

class SymExc:
    """an arbitrary exception"""
    def __init__(self, name, base="BaseException", tests=None):
        self.name, self.base, self.tests = name, base, {}
    def __repr__(self): return f"<any {self.base} {self.name}>"

class GenStop(Exception):
    """the consumer of a generator stopped early"""

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "GeneratorExit": "BaseException", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "NameError": "Exception", "UnboundLocalError": "NameError", "OSError": "Exception", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError", "struct.error": "Exception", "json.JSONDecodeError": "ValueError",
    "zlib.error": "Exception", "zstd.ZstdError": "Exception", "requests.exceptions.HTTPError": "OSError", "MemoryError": "Exception",
    "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "EOFError": "Exception", "gzip.BadGzipFile": "OSError",
}

def exc_name(cls):
    return cls.name if isinstance(cls, (ClassV, TypeV)) else cls

class SuperV:
    def __init__(self, cls, selfv): self.cls, self.selfv = cls, selfv

def clsname(c):
    return c if isinstance(c, str) else c.name


def has_yield(node):
    def walk(n, top):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) and not top:
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c, False) for c in ast.iter_child_nodes(n))
    return walk(node, True)

