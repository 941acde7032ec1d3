"""Runtime monitors for bessagroup/hookeai."""
