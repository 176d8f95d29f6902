"""C31: the MATLAB interface answers what the C library answers."""
import bindcommon


def main():
    return bindcommon.main("C31", "matlab")
