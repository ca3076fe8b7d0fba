// Package gnarkx gives the symbolic builder the marker by which gnark's commitment-based range
// checker recognizes the PLONK builder (the marker's type is internal to gnark, hence the module path).
package gnarkx

import "github.com/consensys/gnark/internal/frontendtype"

type SCS struct{}

func (SCS) FrontendType() frontendtype.Type { return frontendtype.SCS }

type R1CS struct{}

func (R1CS) FrontendType() frontendtype.Type { return frontendtype.R1CS }
