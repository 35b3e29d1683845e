from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C19', analyse('C19'), RULE)
