SPECIFICATION Spec
INVARIANTS Sound Confluent Justified OnlyResolved Respected Monotone Scoped MoreTargets Everything FilterAfter
PROPERTIES Grows
CHECK_DEADLOCK FALSE
