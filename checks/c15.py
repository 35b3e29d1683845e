from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C15', analyse('C15'), RULE)
