def twice(number):
    return 2 * number


print(twice(21))
