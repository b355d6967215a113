#!/bin/sh
# refreshes the scratch copy /tmp/rb
mkdir -p /tmp/rb && cd /tmp/rb && [ -d .git ] || cp -a /repo/. /tmp/rb/
cd /tmp/rb && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdxq
