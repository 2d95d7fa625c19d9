#!/bin/bash
# Nothing to prepare: every check builds what it needs.
exit 0
