"""Reading directories"""
from lib import fscheck


def run():
    fscheck.run("C13", ["readdir"], 30, 12)
