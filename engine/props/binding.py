"""Payload/header agreement (S04), attached vs detached headers (D01) and freshness (K03) over whole operations."""
from . import add as reg, more
from .pipeline import enc_scenario, dec_scenarios

reg(
    "S04",
    "Interprets encrypt::execute and decrypt::execute as a whole (parsed headers of every version, attached and detached, summarised by the postcondition H01-H03 establish) and decides, on every path to a cipher call, that algorithm, mode, nonce, additional data, key-derivation scheme and keyslot used for the payload are those the written or parsed header records.",
    enc_scenario("S04"), *dec_scenarios("S04"))
reg(
    "D01",
    "Interprets encrypt::execute and decrypt::execute with the header attached and detached and decides by byte provenance and file positions where the header bytes are put, that a detached header leaves the data file equal to the attached file without or with its blanked header area, and that decryption starts at the payload in both layouts.",
    enc_scenario("D01"), *dec_scenarios("D01"))
reg(
    "K03",
    "Interprets encrypt::execute and follows every byte of master key, salts and nonces to a call of the operating system's random generator, decides that each comes from its own call with full length and that no random value serves two purposes.",
    enc_scenario("K03"))
more("S01", enc_scenario("S01"))
more("S02", *dec_scenarios("S02"))
