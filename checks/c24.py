from view import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C24', analyse('C24'), RULE)
