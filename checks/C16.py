"""Files that are unlinked while open, and remounts"""
from lib import fscheck


def run():
    fscheck.run("C16", ["dying"], 50, 12, ["FsMC"])
