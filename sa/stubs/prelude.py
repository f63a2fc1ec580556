"""Library functions that take functions or containers, in terms of plain Python (never run)."""

_NOTHING = object()


def reduce(function, iterable, initial):
    value = initial
    for item in iterable:
        value = function(value, item)
    return value


def reduce_first(function, iterable):
    items = list(iterable)
    value = items[0]
    for item in items[1:]:
        value = function(value, item)
    return value


def from_iterable(iterables):
    result = []
    for part in iterables:
        for item in part:
            result.append(item)
    return result


def accumulate(iterable):
    result = []
    value = 0
    for item in iterable:
        value = value + item
        result.append(value)
    return result


def starmap(function, iterable):
    return [function(*item) for item in iterable]


def pairwise(iterable):
    items = list(iterable)
    return list(zip(items[:-1], items[1:]))
