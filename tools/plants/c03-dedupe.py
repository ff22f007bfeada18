PROPERTY = "C03"
NEEDS = "two PermFails of which the first one's message contains the other's"
BREAKS = "a failure whose message is part of an earlier one's is left out, so what the aggregate says depends on the order"
EDITS = [("src/koreo/result.py", """        if isinstance(other, (DepSkip, Skip, Ok, Retry)):
            return self

        message = []
        if self.message:
            message.append(self.message)

        if other.message:
            message.append(other.message)
""", """        if isinstance(other, (DepSkip, Skip, Ok, Retry)):
            return self

        message = []
        if self.message:
            message.append(self.message)

        if other.message and other.message not in (self.message or ""):
            message.append(other.message)
""")]
DEMO = '''
from demolib import *
from koreo.result import PermFail, combine


def said(*messages):
    out = combine([PermFail(message) for message in messages])
    return sorted(out.message.split(", "))


assert said("disk is full", "full") == ["disk is full", "full"], said("disk is full", "full")
assert said("full", "disk is full") == said("disk is full", "full")
'''
