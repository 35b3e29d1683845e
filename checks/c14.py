from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C14', analyse('C14'), RULE)
