#!/bin/bash
# builds the AST extractor (also rebuilt by a check that does not find it)
cd "$(dirname "$0")" && python3-vt -c 'import front; print(front.ensure_astdump())'
