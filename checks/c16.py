"""C16: C++ Reader yields exactly the stored value."""
from checks.cpp_run import *
def main():
    return run("C16", "r", ["flatdata::Reader<T,offset,bits>::operator T", "Reader<Tagged<T,V>>::operator bool / operator* / operator optional", "Reader<pair<T,T>>::operator pair",
                            "masked", "extend_sign", "BitsToUnsigned"])
