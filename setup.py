#!/usr/bin/env python3
"""Builds the symbolic executor and the bitcode of the current tree."""
import vplib

vplib.engine()
vplib.repo_bitcode()
