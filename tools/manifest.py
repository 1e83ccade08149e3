"""Writes MANIFEST.json (developer tool, not run by a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
BASE = ("Every obligation of every contract variant (opcode x version x implementation) is generated from /repo's "
        "current source by symbolic execution of the real functions and discharged by z3 on every run; the same "
        "contracts are also evaluated natively. Trusted: the symbolic executor in engine/, its models of Python "
        "built-ins, z3, xdis tables. ")
LEVEL = {"C10": "exploration", "C17": "exploration"}
NOTE = {
    "C01": "Operands are arbitrary objects (opaque operations).",
    "C02": "Tuples of classes in exception matches are enumerated up to a stated nesting.",
    "C03": "All depths symbolic.",
    "C04": "Truth value / None identity of arbitrary objects.",
    "C05": "Every opcode of every flavour with up to three prefixes and symbolic operands at a symbolic offset.",
    "C06": "Namespaces are arbitrary dictionaries.",
    "C07": "Cells are arbitrary; function calls create fresh cells (make_frame).",
    "C08": "Container lengths symbolic; formatted values opaque. A few variants are bounded in a stated size (evidence lists them).",
    "C09": "Arguments are ropes of symbolic length; what the called function does with them is C10.",
    "C10": "Function.__call__ and make_frame are proved; binding itself is decided by a bounded check: every signature of a stated "
           "size, larger ones at random. Labelled bounded, not counted as proved.",
    "C11": "Operand counts symbolic where the encoding allows it; some variants bounded (evidence lists them).",
    "C12": "Each instruction and manage_block_stack proved for block stacks of any length; whole programs are a bounded check.",
    "C13": "Each instruction and the exception-table lookup proved; whole programs are a bounded check.",
    "C14": "Each instruction proved; whole programs are a bounded check.",
    "C15": "Protocol functions and instructions proved; whole generators and delegation are a bounded check.",
    "C16": "run_frame proved for an arbitrary iteration from an arbitrary state, plus eval_frame and resume_frame.",
    "C17": "get_byteop is proved; non-existing operations are enumerated for all flavours; that interpreters do not affect each other is a "
           "bounded check of pairs and sequences, with the operations' contracts evaluated natively.",
    "C18": "The tracing run_frame and the breakpoint functions are proved; whole traced programs are a bounded check.",
    "C19": "run_python_file, exec_code_object and run_code are proved against stand-ins for the process and files; real runs are a bounded check.",
    "C20": "build_class, metaclass choice and super() are proved; whole class statements are a bounded check against the host.",
    "C21": "Line lookup for tables of any length and the traceback functions are proved; line tables of all flavours and programs are bounded checks.",
    "C22": "One access on the designated objects, for arbitrary objects and names.",
    "C23": "Every builtin that needs the calling frame is proved per flavour; wrong argument counts are evaluated natively.",
    "C24": "execfile, cmp and apply are proved; the adapted namespaces are a bounded check.",
    "C25": "Rendering is proved for every instruction of every flavour; what is shown of one object, and whole programs with and without "
           "logging, are bounded checks.",
}
import sys
claimed = sys.argv[1:] or json.load(open(HERE + "/tools/claimed.json"))
json.dump(claimed, open(HERE + "/tools/claimed.json", "w"))
try:
    NOTE.update(json.load(open(HERE + "/tools/notes.json")))
except FileNotFoundError:
    pass
NA = {}
man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'",
       "checks": [{"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick",
                   "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
                   "technique": "contract-based deductive verification of the real code (path-wise weakest-precondition "
                                "style obligations over the real AST, discharged by z3)",
                   "level": LEVEL.get(p, "proof"), "level_note": BASE + NOTE.get(p, "")} for p in ids if p in claimed],
       "not_applicable": [{"property": p, "reason": NA.get(p, "contracts for this property are not finished yet")}
                          for p in ids if p not in claimed]}
json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
