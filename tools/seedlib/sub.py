def sub(path, old, new, count=1):
    s = open(path).read()
    assert s.count(old) >= 1, "pattern not found"
    assert s.count(old) == count, s.count(old)
    open(path, "w").write(s.replace(old, new))
