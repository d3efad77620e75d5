"""Imports every module that registers checks."""
import checks
import checks2
import checks3
import checks4
import checks5, checks6, checks7, checks8, checks9, checks10, checks11
NOTES = {}
