from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C10', analyse('C10'), RULE)
