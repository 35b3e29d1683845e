from reader import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C22', analyse('C22'), RULE)
