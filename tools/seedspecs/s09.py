ID = "c12-sparse-array-shrinks-on-delete"
PROP = "C12"
NEEDS = "an array that became sparse, then deletion of its last element"
BREAKS = "deleting the last index of a sparse array changes its length; a dense one (and JavaScript) keeps it"
EDITS = [("jstypes/jsobject.py", '''                if self.array[k] is not JSHole:
                    self.array[k] = JSHole
                    return
''', '''                if self.array[k] is not JSHole:
                    if k == len(array) - 1 and not isinstance(
                        array, DenseArrayProperties
                    ):
                        array.resize(k)
                    else:
                        array[k] = JSHole
                    return
''')]
DEMO = '''
from v8serialize.jstypes import JSArray
a = JSArray()
a[0] = 1
a[1000] = 2
del a[1000]
print(len(a.array))
raise SystemExit(len(a.array) != 1001)
'''
