"""All reference producers."""

from sim.producers import aul
from sim.producers import bsm
from sim.producers import databases
from sim.producers import logs
from sim.producers import small
from sim.producers import small2
from sim.producers import small3
from sim.producers import spotlight
from sim.producers import wmi

PRODUCERS = (
    logs.PRODUCERS + aul.PRODUCERS + spotlight.PRODUCERS + small.PRODUCERS
    + small2.PRODUCERS + small3.PRODUCERS + databases.PRODUCERS + bsm.PRODUCERS + wmi.PRODUCERS)
