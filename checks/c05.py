from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C05', analyse('C05'), RULE)
