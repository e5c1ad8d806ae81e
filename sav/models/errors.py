"""Reference behaviour: conversions between error types keep the error whole."""
from .base import *

MS = "error::MetaStructureErrorV14"


def wrap(path, variant, inner=None):
    def m(o):
        x = IN(1)
        if inner:
            x = A(inner[0], inner[1], x)
        return A(path, variant, x), {}
    return m


def m_registry_to_meta(o):
    return A(MS, "ExtrinsicTypeNotResolved", F(IN(1), RE, "Internal", 0)), {}


FROM = "<%s as core::convert::From<%s>>::from"
TABLE = {
    FROM % ("error::MetaStructureErrorV14", "error::MetaVersionErrorPallets"): wrap(MS, "Version"),
    FROM % ("error::MetaStructureErrorV14", "error::RegistryInternalError"): wrap(MS, "ExtrinsicTypeNotResolved"),
    FROM % ("error::MetaStructureErrorV14", "error::RegistryError<()>"): m_registry_to_meta,
    FROM % ("error::ParserError<E>", "error::RegistryError<E>"): wrap(PE, "Registry"),
    FROM % ("error::ParserError<E>", "error::RegistryInternalError"): wrap(PE, "Registry", (RE, "Internal")),
    FROM % ("error::ParserError<E>", "external_memory_tools::BufferError<E>"): wrap(PE, "Buffer"),
    FROM % ("error::RegistryError<E>", "error::RegistryInternalError"): wrap(RE, "Internal"),
    FROM % ("error::SignableError<E, M>", "error::ParserError<E>"): wrap(SE, "Parsing"),
    FROM % ("error::UncheckedExtrinsicError<E, M>", "error::ParserError<E>"): wrap(UE, "Parsing"),
}
