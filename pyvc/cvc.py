def cvc5_check(smt2, timeout_ms):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    parser = cvc5.InputParser(slv)
    txt = '(set-logic ALL)\n' + smt2 + '\n(check-sat)\n'
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = parser.getSymbolManager()
    out = ''
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out += str(cmd.invoke(slv, sm))
    return out.strip().split('\n')[-1]
