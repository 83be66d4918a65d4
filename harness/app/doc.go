// Package app is the program itself, made importable for harnesses.
package app
