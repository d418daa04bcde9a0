"""Builds the harness once so that the checks only recompile what changed."""
import vlib
vlib.build()
