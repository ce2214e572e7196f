"""The name space"""
from lib import fscheck


def run():
    fscheck.run("C11", ["ns", "all"], 16, 8, ["FsMC"])
