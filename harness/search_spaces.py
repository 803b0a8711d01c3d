from skdecide import EnumerableSpace


class ListSpace(EnumerableSpace):
    """A listed set of elements, which may be empty."""

    def __init__(self, elements):
        self.elements = list(elements)

    def contains(self, x):
        return x in self.elements

    def get_elements(self):
        return list(self.elements)
