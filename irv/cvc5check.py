"""Second opinion from cvc5 on a query that z3 gave up on."""
import z3


def check(facts, timeout_ms):
    import cvc5
    s = z3.Solver()
    s.add(*facts)
    txt = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    slv.setLogic('ALL')
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = parser.getSymbolManager()
    res = 'unknown'
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm)
        o = str(out).strip()
        if o in ('sat', 'unsat', 'unknown'):
            res = o
    return res
