AI = "static analysis: path-sensitive abstract interpretation of the compiler's MIR with loop invariants and a linear-arithmetic domain"
NOTE = "every execution of the analysed entry points over arbitrary inputs is covered by the abstract semantics; std and dependency functions are modelled by their documented contracts; stack use and allocator aborts are not covered; debug assertions are compiled out"
TECH = {}
for _p in ["C%02d" % i for i in range(1, 35)]:
    TECH[_p] = (AI, NOTE)
TECH["C26"] = (AI + " and decoding of the compiled display strings", NOTE)
TECH["C25"] = ("compile-fail witnesses with compiling twins, decided by the borrow checker and privacy rules of rustc, and a lifetime, variance and visibility analysis of every public signature",
               "every public function and type is judged from the compiled signatures; each witness must be rejected with the expected error and its legal twin must compile; the soundness of rustc's borrow checker is assumed; renaming public items makes a twin fail, which is reported")
TECH["C24"] = (AI + " of the flow of errors to the results of public functions", NOTE)
TECH["C30"] = (AI + " tracking where the bytes of unchecked documents come from", NOTE)
for _p in ("C17", "C18", "C34"):
    TECH[_p] = (AI + ", with runs of bytes of one class summarised exactly and paths joined at returns", NOTE)
