"""File contents"""
from lib import fscheck


def run():
    fscheck.run("C12", ["data"], 50, 12, ["FsDataMC"])
