// Package props holds one harness per property.
package props
