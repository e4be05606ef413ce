// Stands in for the generated docstrings.
#pragma once
#define DOC(...) ""
