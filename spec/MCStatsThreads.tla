--------------------------- MODULE MCStatsThreads ---------------------------
EXTENDS StatsThreads
=============================================================================
