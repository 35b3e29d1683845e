from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C18', analyse('C18'), RULE)
