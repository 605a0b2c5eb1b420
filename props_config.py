"""Per property settings of check.py"""
A = ["the host process is single threaded, as the library requires",
     "harness build: g++ -O1 -fwrapv -fno-delete-null-pointer-checks (the code base calls members on null), asserts enabled",
     "only sizes, values and shapes inside the listed bounds are covered"]
T = "explicit enumeration of all cases within bounds on the real code, conformance against an executable reference model"
N = ("Exhaustive within the bounds listed in the evidence file; the expected behaviour comes from the reference model in mc/ref.h, "
     "written from the language's documentation and tests, and every explored case is executed on the code built from /repo.")
CONFIG = {}
def c(i, **k):
    k.setdefault("level", "model_checking")
    k.setdefault("assumptions", A)
    k.setdefault("technique", T)
    k.setdefault("note", N)
    CONFIG[i] = k
for i in range(1, 24):
    c("C%02d" % i)
CONFIG["C20"]["tools"] = ["driver", "comp"]
CONFIG["C08"]["asan"] = True
CONFIG["C10"]["asan"] = True
CONFIG["C11"].update(asan=True, level="fault_enumeration",
    rule="every strict prefix, every single byte and aligned or unaligned length-word corruption, and every failing write position of the listed programs' saved forms; distinct_nontrivial counts distinct verdicts",
    technique="exhaustive fault enumeration (truncation points, corruptions, failing write positions) on the real code",
    note="Every fault point of the listed programs' files is injected into the real load and save code: truncation and corruption in the file, write failures through the file size limit of the process, once permanently and once transiently.")
CONFIG["C22"].update(tools=["driver_sdl"], asan=True)
