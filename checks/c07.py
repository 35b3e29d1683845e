from trie import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C07', analyse('C07'), RULE)
