SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Lo <- MachineLo
          Hi <- MachineHi
