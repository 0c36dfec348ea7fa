#pragma once
long heapBlocks();     // blocks of memory in use (not known in the build for AddressSanitizer)
