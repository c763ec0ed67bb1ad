// Allocation override is left out: sanitizers need to see the real allocator.
#pragma once
