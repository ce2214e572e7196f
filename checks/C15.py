"""Attributes and timestamps"""
from lib import fscheck


def run():
    fscheck.run("C15", ["attr"], 60, 12)
