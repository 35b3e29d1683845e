from trie import analyse, runner, RULE
if __name__ == '__main__':
    runner.main('C08', analyse('C08'), RULE)
