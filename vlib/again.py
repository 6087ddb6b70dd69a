"""A harness run twice in one process, with other inputs the second time: what
the library remembers of the first use must not show in the second."""


def twice(fn):
    def both(h, first, second):
        fn(h, **first)
        h.again()
        fn(h, **second)

    both.__name__ = fn.__name__ + "_twice"
    return both
