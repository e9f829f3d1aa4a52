"""Library functions as plain Python (executed by the verifier in place of the library's code)."""
from anytree import PreOrderIter


def findall(node, filter_):
    """anytree: the nodes below (and including) the node that satisfy the filter, in preorder"""
    return tuple([n for n in PreOrderIter(node) if filter_(n)])


def writerows(writer, rows):
    for r in rows:
        writer.writerow(r)
