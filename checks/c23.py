from view import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C23', analyse('C23'), RULE)
