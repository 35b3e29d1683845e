from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C06', analyse('C06'), RULE)
