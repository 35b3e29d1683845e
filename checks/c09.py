from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C09', analyse('C09'), RULE)
