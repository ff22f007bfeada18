PROPERTY = "C03"
NEEDS = "several Ok outcomes of which the first holds a list"
BREAKS = "combining appends to the first value when it is a list itself"
EDITS = [("src/koreo/result.py", """            if isinstance(self.data, _OkData):
                return self

            return Ok(data=_OkData([self.data]), location=self.location)
""", """            if isinstance(self.data, (_OkData, list)):
                return self

            return Ok(data=_OkData([self.data]), location=self.location)
"""), ("src/koreo/result.py", """    if isinstance(combined.data, _OkData):
        return combined.data.values

    # Python""", """    if isinstance(combined.data, _OkData):
        return combined.data.values

    if isinstance(combined.data, list):
        return combined.data

    # Python""")]
DEMO = '''
from demolib import *
from koreo.result import Ok, Skip, unwrapped_combine, combine

out = unwrapped_combine([[1, 2], Skip()])
assert out == [[1, 2]], out
assert combine([Skip(), Ok([1, 2]), Skip()]).data == [[1, 2]]
assert unwrapped_combine([[1, 2], [3]]) == [[1, 2], [3]]
'''
