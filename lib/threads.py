"""Engine for threads: the same machinery as the in-process world, with the
executable that simulates thread schedules."""
from world import check, replay
