"""qsa: a static analyser for QMix (see /verif/DESIGN.md).

Pure standard-library Python.  Nothing here imports or runs the analysed
package: every run parses /repo's current source.
"""
