def f(l):
    x = 0
    for i in range(len(l)):
        print(l[i])
    if x == None:
        return True
    else:
        return False
