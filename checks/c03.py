from tmpl import analyse, runner
RULE = ('Abstract interpretation of HttpTemplate::Parse and its callees from the LLVM IR of the current sources for an arbitrary '
        'input string, against a character-driven machine of the documented grammar run in lockstep.')
if __name__ == '__main__':
    runner.main('C03', analyse('C03'), RULE)
