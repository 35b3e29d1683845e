from reader import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C21', analyse('C21'), RULE)
