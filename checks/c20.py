from reader import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C20', analyse('C20'), RULE)
