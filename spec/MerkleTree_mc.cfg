INIT Init
NEXT Next
INVARIANTS TypeOK Durable Bounded HistoryClosed Injective Complete Sound
CHECK_DEADLOCK FALSE
