"""C17: C++ Writer stores the value and touches nothing else."""
from checks.cpp_run import *
def main():
    return run("C17", "w", ["flatdata::Writer<T,offset,bits>::operator= / operator T", "Writer<Tagged<T,V>>::operator= (value, optional) / operator bool / operator*", "masked", "IsSigned"])
