from lookup import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C16', analyse('C16'), RULE)
