ID = "c12-equality-ignores-positions-of-holes"
PROP = "C12"
NEEDS = "two arrays of equal length with equal elements in the same order, at different indexes among holes"
BREAKS = "arrays with elements at different indexes compare equal"
EDITS = [("jstypes/jsarrayproperties.py", '''                and all(
                    self[i] == other[i]
                    for i in self.element_indexes(order=Order.UNORDERED)
                )
''', '''                and all(
                    a == b
                    for a, b in zip(
                        self.elements().values(), other.elements().values()
                    )
                )
''')]
DEMO = '''
from v8serialize.jstypes import JSArray, JSHole
a, b = JSArray([1, JSHole, 2]), JSArray([JSHole, 1, 2])
raise SystemExit(a.array == b.array)
'''
